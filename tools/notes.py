"""per-property additions to level_note, and reasons for not claiming"""
NOTES = {}
NA = {}
