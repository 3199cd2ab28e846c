"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state),
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


I = ["inputs"]
p("C01", "Variable-length integers are encoded and decoded exactly as QUIC defines",
  "Encoding a value below 2^62 yields the shortest QUIC variable-length form of it, and encoding a larger value is an error. "
  "Every reader of variable-length integers (from a byte slice or a byte stream) returns exactly the big-endian value of the 1, 2, 4 or 8 bytes announced by the top two bits of the first byte, consumes or reports exactly that many bytes, and returns an error when the input ends early.",
  I, "every u64 value; every byte string of any length and any starting position",
  "2^64 values and unboundedly many byte strings; the tests sample a handful of encodings and never the slice decoder's 4 and 8 byte forms",
  ["src/utils.rs"], [("encode_var_int", "src/utils.rs"), ("decode_var_int, var_int_from_stream, var_int_with_bytes_from_stream", "src/utils.rs")],
  observe=["returned value, returned length, stream position"])
p("C02", "Fixed-size integers, byte runs and connection ids are big-endian and exact",
  "Reading a fixed-width integer, a run of n bytes, the remaining bytes, or a connection id of up to 20 bytes returns exactly the next bytes of the input in network byte order and consumes exactly those bytes, and is an error if fewer are available. "
  "Writing a connection id with a length of n bytes yields exactly its n low-order bytes in network byte order, so that reading it back with the same length returns the same id.",
  I, "every byte string; every width 8..160 bits; every connection id and length 0..20",
  "quantifies over all byte strings, ids and lengths; the tests use a few constants and lengths",
  ["src/utils.rs", "src/quictls/utils.rs"],
  [("integer and id readers", "src/utils.rs prelude impls"), ("U160::to_bytes / to_var_bytes", "src/utils.rs"), ("var_*_from_stream, all_bytes_from_stream, fixed_len_dcid_from_stream, decode_bytes", "src/utils.rs")])
p("C03", "Received frames are parsed exactly as RFC 9000 section 19 lays them out",
  "For every payload the decoder returns, in order, exactly the frames RFC 9000 section 19 defines for those bytes: type, every field value, flag bits, optional fields, repeated ranges and data extent, with each frame starting where the previous one ended. "
  "An unknown frame type, an invalid connection id length or any truncated frame makes decoding fail with an error rather than yield a frame.",
  I, "every payload byte string", "unbounded inputs and 20 frame layouts with flag combinations; the tests decode one packet with a CRYPTO and PADDING frame",
  ["src/frame.rs", "src/utils.rs"], [("deserialize_frame, deserialize_frames", "src/frame.rs"), ("per-frame readers", "src/frame.rs Frame*::from_datagram")])
p("C04", "Frames are serialised per RFC 9000 section 19 so that they decode to themselves",
  "Serialising a list of frames yields the concatenation of each frame's RFC 9000 section 19 encoding with the type bits that describe its contents, and decoding those bytes yields the same frames. "
  "A stream frame omits its length only when it is the last frame of a payload that extends to the end of the datagram, and a field that does not fit in a variable-length integer makes serialisation fail.",
  I, "every list of frames, every field value, both settings of the end-of-datagram flag",
  "unbounded lists and field values; the tests serialise one sample per frame type, with small field values",
  ["src/frame.rs"], [("serialize_frames, Frame::to_bytes", "src/frame.rs"), ("constructors", "src/frame.rs Frame*::new*")])
p("C05", "No datagram received from the network can panic the endpoint",
  "Whatever bytes arrive in whatever datagrams, receiving, logging, classifying, routing, decrypting and parsing them terminates each step with a value or an error; no arithmetic overflow, out-of-range index, unwrap of a failure or explicit panic is reachable from them.",
  ["inputs", "histories"], "every datagram, every connection state", "quantifies over every datagram and every state of the connection; the tests feed well-formed samples",
  ["src/routing.rs", "src/packet.rs", "src/frame.rs", "src/utils.rs", "src/connection.rs", "src/quictls/secrets.rs", "src/quictls/cipher_suite.rs"],
  [("error returns of all readers", "src/utils.rs"), ("receive loop", "src/routing.rs")])
p("C06", "A datagram's cost is bounded by its size, not by lengths it claims",
  "While a received datagram is processed, every loop makes progress through the received bytes or is bounded by a constant, and no memory is reserved for a length, count or offset merely announced by the peer: allocations are bounded by the bytes actually received.",
  I, "every datagram", "an adversary picks the announced lengths; a test can only sample some, and cannot show that no field drives an allocation",
  ["src/frame.rs", "src/utils.rs", "src/packet.rs", "src/routing.rs"], [("dynamic growth instead of reservation", "src/frame.rs FrameAck::from_datagram"), ("byte-wise readers", "src/utils.rs")])
p("C07", "Packet headers are classified and parsed exactly as QUIC v1 / RFC 8999 define",
  "The header form, packet type, version, connection id lengths and connection ids read from a datagram are exactly the ones at their RFC positions, with a short header carrying an 8 byte destination id; a version 0 long header is Version Negotiation whatever its type bits and may carry ids of up to 255 bytes, while any other long header with an id longer than 20 bytes, or any truncated header, is an error. "
  "Retry and Version Negotiation headers are treated as unprotected, every other received header as protected, and fields under protection cannot be read before protection is removed. "
  "Writing a long header other than Version Negotiation yields the bytes it was read from. A Version Negotiation packet lists exactly the 32-bit versions following its header, and is an error if they do not divide evenly.",
  I, "every datagram prefix", "unbounded inputs; tests parse one Initial header",
  ["src/packet.rs", "src/utils.rs"], [("LongPacketHeader, ShortPacketHeader, next_header_from_stream", "src/packet.rs")])
p("C08", "Received packets are delimited, authenticated and decrypted over the right bytes",
  "For every datagram, a packet of each protected type takes its header protection sample 4 bytes after the start of the packet number field, its packet number from exactly the announced number of unmasked bytes, its associated data as all unprotected header bytes through the packet number, and its ciphertext as exactly the bytes up to the announced length (or the end of the datagram for short headers). "
  "Its frames come only from the successfully authenticated plaintext, and the next coalesced packet starts exactly where the previous one ended; a datagram that cannot satisfy this is an error.",
  ["inputs", "histories"], "every datagram, every coalescing, every connection state", "quantifies over every header layout, packet number length and coalescing; the tests decode a single Initial packet with a 4 byte packet number",
  ["src/packet.rs", "src/connection.rs"], [("Packet*::from_stream", "src/packet.rs"), ("decode_next_packet, decode_packets", "src/packet.rs")])
p("C09", "Packets we build are laid out and protected as the peer expects",
  "An Initial or Handshake packet is serialised as its header with the type, packet number length, connection ids and version of the connection, then (Initial only) token length and token, then a length covering packet number and protected payload, the packet number and the payload; the payload is the packet's frames encrypted with everything before it as associated data, and header protection is applied last with the sample taken 4 bytes after the packet number's start. "
  "Consequently decoding it with the peer's keys yields the same packet.",
  ["inputs", "histories"], "every frame list, token, packet number, id length", "quantifies over payloads, tokens and packet numbers; tests check one client Initial packet against the RFC 9001 sample",
  ["src/packet.rs", "src/connection.rs"], [("PacketInitial/PacketHandshake::new and ::serialize", "src/packet.rs"), ("get_local_protected_payload_len", "src/connection.rs")])
p("C10", "Each packet number space and direction uses its own keys and counters",
  "Sending uses only our own keys and receiving only the peer's keys of the packet's own number space (Initial, Handshake, Application), and packet number state is never shared between spaces. "
  "A new connection has keys only for the Initial space, with the server's keys as the local ones exactly when it acts as server; using a space without keys is an error.",
  ["inputs", "histories", "configurations"], "every packet type, role and connection state", "tests exercise only the client's Initial keys",
  ["src/connection.rs", "src/packet.rs"], [("borrow_*_tls_secrets, borrow_pn_info", "src/connection.rs"), ("PN_SPACE of each packet type", "src/packet.rs"), ("Connection::new", "src/connection.rs")])
p("C11", "Initial keys are derived per RFC 9001 for every connection id and role",
  "Initial secrets are derived from exactly the destination connection id's bytes with the version's salt via HKDF-SHA256, using the label of the requested role, and the key, IV and header protection key are expanded from that secret with their own labels and lengths (16, 12, 16) in the TLS 1.3 label format.",
  ["inputs", "configurations"], "every connection id of any length, both roles", "tests check the client side for one connection id; the server side and other ids are untested",
  ["src/quictls/secrets.rs", "src/quictls/cipher_suite.rs", "src/version.rs", "src/connection.rs"], [("Secrets::from_initial, from_secret", "src/quictls/secrets.rs"), ("hkdf_expand_label_sha256, get_hkdf_label_info", "src/quictls/cipher_suite.rs")])
p("C12", "Payload protection is AES-128-GCM with a per-packet nonce and a full tag check",
  "Encryption and decryption of a payload use the packet protection key, the nonce formed by XORing the 62-bit packet number right-aligned into the IV, and exactly the given associated data; the ciphertext is followed by the full 16 byte tag. "
  "Decryption verifies all 16 tag bytes before returning any plaintext and a payload shorter than the tag is an error; the announced protected length is always the plaintext length plus 16.",
  I, "every packet number, payload, associated data, key", "2^62 packet numbers and unbounded payloads; tests use packet number 2 and one payload",
  ["src/quictls/secrets.rs", "src/quictls/cipher_suite.rs"], [("Secrets::encrypt_payload/decrypt_payload", "src/quictls/secrets.rs"), ("internal_encrypt/decrypt_aes_128_gcm", "src/quictls/cipher_suite.rs")])
p("C13", "Packet numbers are never reused: each space issues 0, 1, 2, ... in order",
  "In every packet number space of a connection the first packet gets number 0 and each further packet the successor of the previous one, whether or not building earlier packets succeeded, and nothing else changes the counter. "
  "Issuing a number in one space leaves the other spaces untouched.",
  ["histories"], "every sequence of packets built on a connection", "quantifies over all histories of operations; tests build at most one packet",
  ["src/connection.rs", "src/packet.rs"], [("get_next_pn, PacketNumberSpaceInfo", "src/connection.rs")],
  state=[{"name": "next_pn", "meaning": "next packet number of a space", "where": "src/connection.rs"}])
p("C14", "Truncated packet numbers are reconstructed by any peer to the full number",
  "A packet number is sent with enough low-order bytes (4 when nothing is acknowledged yet) to represent more than twice the distance to the largest acknowledged number, and a number that cannot be represented or was already acknowledged is an error. "
  "A received truncated number is expanded to the value congruent to it that is closest to one past the largest received number, as in RFC 9000 appendix A.3, or taken as is when nothing was received.",
  ["inputs", "histories"], "every packet number, acknowledged number, truncated byte string of 1..4 bytes", "quantifies over 62-bit packet numbers and windows; tests sample RFC examples at most",
  ["src/connection.rs", "src/utils.rs"], [("truncate_pn, reconstruct_remote_pn", "src/connection.rs"), ("floor_log2", "src/utils.rs")])
p("C15", "Header protection masks exactly the protected bits and is self-inverse",
  "The mask is the first 5 bytes of AES-128-ECB under the header protection key of a 16 byte ciphertext sample. "
  "Applying or removing protection flips exactly the low 4 bits (long header) or low 5 bits (short header) of the first byte selected by the first mask byte and XORs packet number byte i with mask byte i+1, applies at most once, leaves all other bits alone, and refuses more than 4 packet number bytes.",
  I, "every header byte, mask, packet number length and sample", "all masks and header bytes; tests use the RFC 9001 sample only, never a short header",
  ["src/packet.rs", "src/quictls/secrets.rs", "src/quictls/cipher_suite.rs"], [("add_protection/remove_protection, xor_pn_protection", "src/packet.rs"), ("hp_mask", "src/quictls/cipher_suite.rs"), ("get_header_protection_mask", "src/quictls/secrets.rs")])
p("C16", "Datagrams reach exactly the connection their destination id names",
  "A datagram is handed, unmodified, to the connection registered under the value of its destination connection id and to no other; a datagram for no registered connection is either offered as a new connection attempt (only when it starts with an Initial packet) or dropped with an error. "
  "Packets are decoded with the state of the connection named by the destination id and no datagram is lost or delivered twice while its connection is registered. "
  "A new connection attempt that is accepted becomes a server connection set up from that datagram's own destination id (value and length). (Version Negotiation packets are covered for ids of up to 20 bytes, the longest id a QUIC v1 connection can have.)",
  ["inputs", "histories", "schedules"], "every datagram, every set of registered connections", "no test covers routing",
  ["src/routing.rs"], [("recv_new_initial_datagram, route_datagram, packets_from_datagram", "src/routing.rs")],
  state=[{"name": "streams", "meaning": "registered connections by id", "where": "src/routing.rs"}])
p("C17", "Registering a connection never replaces another; dropping removes only its own",
  "Accepting a connection registers it under a freshly drawn random 8 byte id that no live connection uses, with the check and the registration in one critical section and the connection's source id set to that key; an existing entry is never overwritten. "
  "Dropping a stream handle removes exactly the entry of its own connection id and nothing else ever removes or modifies entries.",
  ["histories", "schedules"], "every interleaving of accepts and drops, every random draw", "needs id collisions and concurrent accepts; no test covers accept",
  ["src/routing.rs", "src/interface.rs", "src/quictls/utils.rs"], [("accept, drop_connection", "src/routing.rs"), ("Drop for QuicStream", "src/interface.rs"), ("get_connection_id", "src/quictls/utils.rs")])
p("C18", "Shared socket state is locked without deadlock or lock order inversion",
  "No thread acquires a lock it may already hold, any two locks that are nested are always nested in the same order, and no thread blocks on the network or on randomness while holding the connection table or a connection's lock. "
  "Every lock taken is released on every exit path.",
  ["schedules"], "every interleaving of threads sharing a socket", "schedules; no test is concurrent",
  ["src/routing.rs", "src/interface.rs"], [("Mutex/RwLock use", "src/routing.rs")])
p("C19", "Transport parameters are encoded with their RFC identifiers, lengths and values",
  "Every transport parameter is serialised as its RFC 9000 section 18.2 identifier, the exact length of its value and the value in the form defined for it (variable-length integer, raw bytes, empty, or the preferred address layout with id length and reset token); a value that does not fit is an error.",
  I, "every parameter and value", "no test covers transport parameters",
  ["src/transport_parameters.rs"], [("TransportParameter::serialize, identifier_val, PreferredAddress::to_bytes", "src/transport_parameters.rs")])
p("C20", "Every transport error maps to its RFC 9000 error code",
  "Each error kind reports the code RFC 9000 section 20.1 assigns to it, so no two kinds share a code.",
  I, "every error kind", "no test covers the table",
  ["src/error.rs"], [("Error::to_error_byte", "src/error.rs")])
p("C21", "Key material never reaches debug or log output and traffic logging is opt-in",
  "No formatting of any connection, stream or socket object prints keys, IVs or secrets. "
  "Received headers and packets are printed only while traffic logging is switched on; it is off initially, and switching it on or off takes effect for the next datagram.",
  ["programs", "histories"], "every formatting path and every logging setting", "tests cannot show that no path prints a secret",
  ["src/quictls/secrets.rs", "src/routing.rs", "src/connection.rs"], [("Debug for Secrets", "src/quictls/secrets.rs"), ("log_traffic flag", "src/routing.rs")])
p("C22", "Safe functions of the crate are sound",
  "No function callable without an unsafe block can create uninitialised, dangling, invalid or unaligned values or otherwise cause undefined behaviour for some argument or type; functions that can are marked unsafe.",
  ["programs"], "every caller and type instantiation", "undefined behaviour for some type parameter cannot be excluded by testing a few instantiations",
  ["src/utils.rs"], [("calloc, alloc_box_buffer", "src/utils.rs")])
p("C23", "A received datagram is taken from the socket whole and unaltered",
  "Each receive step hands on exactly the bytes of one UDP datagram of any size up to the protocol maximum of 65,527 payload bytes, together with its sender's address; nothing is truncated, padded, or mixed with data of an earlier datagram, and socket errors are returned to the caller.",
  ["inputs", "histories"], "every datagram size and content", "no test receives datagrams",
  ["src/routing.rs"], [("recv_datagram", "src/routing.rs")])
p("C24", "accept returns a usable stream for every new connection attempt",
  "When a client sends a valid Initial packet to a bound socket, a pending accept eventually returns a stream handle for it.",
  ["histories", "schedules"], "every client behaviour and network schedule", "liveness over network schedules; not tested",
  ["src/routing.rs", "src/interface.rs"], [("accept", "src/routing.rs")])
p("C25", "Protected payloads are confidential and unforgeable; ids are unpredictable",
  "An attacker without the keys cannot learn or forge payloads and cannot predict issued connection ids.",
  ["inputs"], "every attacker", "computational security of AES-GCM, HKDF and the OS generator",
  ["src/quictls/cipher_suite.rs", "src/quictls/utils.rs"], [("openssl primitives", "openssl crate")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
