prop("C90", "Comparisons of secrets take time independent of the secrets",
     "The time to refuse a password, tag or ciphertext does not depend on how much of it is right.",
     ["inputs"], "all passwords and hashes", "tests do not measure time", ["crypto/password.go"], [("subtle.ConstantTimeCompare", "crypto/password.go")],
     na="timing of compiled code is not represented in the SSA semantics the solver reasons about")
prop("C91", "The system's random source is unpredictable",
     "Random bytes used for keys, nonces, passwords, salts and identifiers cannot be predicted.",
     ["inputs"], "all randomness", "unpredictability is a statement about a probability distribution", ["crypto/random.go"], [("crypto/rand", "crypto/random.go")],
     na="entropy is a property of the operating system's generator, not of code that can be encoded; C20 decides that what it returns is used whole and once")
prop("C92", "Data in a Bolt store survives a crash of the machine",
     "After a crash at any moment a Bolt store holds every acknowledged write and no partial one.",
     ["crash_points"], "all crash points within bbolt's page writes", "tests do not crash", ["io/bolt.go"], [("bbolt transactions", "io/bolt.go")],
     na="decided inside bbolt and the file system (mmap, fsync), which are dependencies outside the encodable code")
