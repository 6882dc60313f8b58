SPECIFICATION TSpec
CONSTANT PathBits = 64
