"""names of the decoders the Rust harness reaches (importable without the virtual world)"""
ELEMENTS = ("bool", "int", "null", "octets", "oid", "odesc", "real", "reloid", "seq", "option", "ip", "c32", "g32", "tt",
            "opaque", "c64", "u32", "header", "value")
LAYERS = ("pdu", "scoped", "usm", "v1", "v2c", "v3")
ALL = ELEMENTS + LAYERS
