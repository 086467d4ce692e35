@skip_mod system
