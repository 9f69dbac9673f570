"""One module per property; each provides scenarios(tier) and, optionally, program_rules(lab)."""
