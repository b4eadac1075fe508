"""pdrlint: static analyses specific to MillionConcepts/pdr (stdlib only)."""
