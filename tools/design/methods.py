# how each property is decided: (method, quick cost in seconds)
M = {
"C01": ("The value is one 32-bit symbol; encoder output is compared byte for byte with RFC 7541 §5.1 written out as arithmetic in the harness, then decoded again with arbitrary bytes behind it.", 3),
"C02": ("All input bytes are symbolic; the oracle is the RFC's sum computed in 64 bits, with the error conditions of the statement.", 5),
"C03": ("Symbolic bytes at chosen positions of names and values; the oracle is an independent HPACK decoder (`sym/ref/hpack_ref.h`) reading what the encoder wrote.", 35),
"C04": ("All coded bytes symbolic; the oracle is an independent Huffman decoder over the RFC table, with the rules for padding and EOS.", 45),
"C05": ("Header blocks with symbolic bytes are decoded by the code and by the reference decoder; results, errors and tables must agree, also for the blocks that follow.", 40),
"C06": ("Responses are produced by the real encoder (directly, and over a connection) and read by the reference decoder with its own, conforming table; which earlier entry is referred to, and sizes, are symbolic.", 40),
"C07": ("Operations on the table with symbolic sizes, contents and maxima, against a reference list with RFC 7541 §4 accounting.", 25),
"C08": ("Lengths around the limits with symbolic bytes and sizes; refused iff over the limit, and memory in use stays below it.", 40),
"C09": ("Every field of every fixed-size codec is symbolic; parse∘serialise is identity and the bytes are those of RFC 9113.", 5),
"C10": ("One frame with symbolic header and payload on a real connection; the verdict (refused or processed) and the request the handler receives are compared with RFC 9113's rules; reads past a frame are memory errors.", 30),
"C11": ("Arbitrary bytes, frame headers and transport errors over a connection; the engine's memory and exception checks and a bound on buffered bytes are the assertions.", 45),
"C12": ("The same conversation is run in one read and in any split; the two transcripts (with symbolic contents) must be equal.", 45),
"C13": ("24 symbolic bytes and symbolic cut points; a response, or any processing, requires equality with the preface.", 10),
"C14": ("Sequences of frames with symbolic kinds and contents; the number and place of SETTINGS ACKs in the output is compared with the number of valid SETTINGS.", 30),
"C15": ("Handlers return symbolic statuses, headers and bodies; the peer model parses the output and reassembles responses.", 40),
"C16": ("A violation with symbolic contents is put anywhere; nothing after it is served and the connection is reported finished.", 40),
"C17": ("Write results are symbolic (any count, would-block, error); the bytes the transport took must be a prefix of, and finally equal to, those of a run with an obliging transport; nothing is written after a fatal error.", 40),
"C18": ("Handlers throwing 11 types, incomplete header lists; other requests must be answered as if alone.", 30),
"C19": ("A virtual clock with a symbolic amount of time before every step; the oracle keeps the last instant of activity.", 35),
"C20": ("The real server over the kernel model, with symbolic event sequences; the model counts descriptors.", 45),
"C21": ("Failures with symbolic errno at accept, registration, read, write and wait; a client before and one after must be served.", 45),
"C22": ("The stop is delivered at a symbolic call or wait; after it, no further wait may block and the loop must return.", 30),
"C23": ("Symbolic sequences of registrations and event masks against the interest sets the harness keeps.", 40),
"C24": ("Symbolic results of read(2)/write(2), including every errno, against the mapping of the statement.", 15),
"C25": ("Symbolic results of every TLS call, on two sessions sharing the library's error queue.", 30),
"C26": ("Symbolic sequences of moves, closes and destructions; the kernel and TLS models know what is open and report double and missing releases.", 40),
"C27": ("Request paths with symbolic bytes over a tree with links; the file system model records every file opened, and only files that lie inside the directory may be.", 40),
"C28": ("Files with symbolic contents read in symbolic portions; the response must be the file, its length and type.", 8),
"C29": ("Routes and requests with symbolic paths and methods, against a reference first-match search.", 5),
"C30": ("Each middleware's behaviour is a symbolic choice; the sequence of calls and the final response are compared with function composition.", 13),
"C31": ("Symbolic bytes in method, path, referrer, agent; symbolic local time; the line is parsed by an independent parser of the combined log format and must give back the fields, escaped.", 10),
"C32": ("Whether each option and variable is given, and its text, are symbolic; the TLS model records contexts, the kernel model listening and any cleartext byte.", 20),
"C33": ("Histories of requests with symbolic statuses; the page's numbers are parsed and compared with counts the harness keeps; symbolic uptimes.", 28),
"C34": ("All bytes of the offered list symbolic; result pointer must lie inside it and name h2, or be refused.", 13),
"C35": ("Symbolic combinations of options, port digits and level spellings through main(), observed through what a client is served and which addresses are bound.", 30),
"C36": ("Key-log callback with symbolic lines and file contents over the file system model.", 6),
"C37": ("Header blocks with symbolic bytes and references; the request a handler sees is compared with what the reference decoder reads.", 20),
"C38": ("Each connection's transcript in a symbolic interleaving must equal its transcript alone.", 40),
"C39": ("The real telemetry code and call sites over the recording stand-in; one span per request with the values of the statement, ended, and in a trace of its own.", 33),
"C40": ("One system call of the start, chosen symbolically, fails with a symbolic errno; the start must be reported failed and every descriptor, context and registration released.", 26),
"C41": ("The same conversation is run in cleartext and over the TLS model, which keeps records, their division into arrivals and unread plaintext, all symbolic; the two plaintexts and ends must agree.", 21),
"C42": ("close() at a symbolic point of a conversation, with symbolic blocking and symbolic later input; the transcript must be that of the conversation so far, one GOAWAY, and one shutdown after delivery.", 11),
"C43": ("The engine counts live heap bytes; after a warm-up, every further round of a conversation or client must leave the count where it was, and the end of a connection must give back what its start took.", 25),
}
