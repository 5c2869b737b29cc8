// Builds the crates the generated programs of C08 link against.
