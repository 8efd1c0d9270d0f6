VN = "global value numbering (value-graph comparison with a published definition) over LLVM IR and inline assembly"
PROPS = [
 dict(id="P01", title="Running out of memory is reported, never a crash or a false success",
      statement="Whenever any memory request inside any library operation fails, the operation neither reads nor writes through the "
                "missing memory nor releases memory it never obtained. The operation reports failure (an error code or a null result) instead of success.",
      over=["fault_sequences", "inputs"], forall="every public operation, every allocation it makes, every single (thorough: every pair of) failing allocation, in every build configuration",
      why="No existing test makes an allocation fail; there are dozens of allocation points and their combinations with later cleanup code.",
      files=["src/com/bignumber.c", "src/com/gcd.c", "src/com/montexpmod.c", "src/com/prime.c", "src/com/random.c", "src/pk/rsa.c", "src/pk/asn1.c", "src/cipher/*.c", "src/digest/*.c"],
      mech=[("null checks after each allocation and goto-cleanup exits", "every constructor and every function that creates temporary numbers")],
      tech="path-sensitive typestate analysis over LLVM IR (null/ownership)",
      note="All paths, with 1 (quick) or 2 (thorough) independent failing steps per path; callees inlined or summarised; integer conditions abstracted, so paths are over-approximated except for tracked correlations; trusts clang's IR."),
 dict(id="P02", title="Every allocation and descriptor is released exactly once on every path",
      statement="On every path through every library operation, successful or failing, memory and file descriptors it obtained are either handed to the caller "
                "or released before it returns. Nothing is released twice, released without having been allocated, or used after its release, including inside the destroy operations.",
      over=["fault_sequences", "inputs", "histories"], forall="every path of every function, every object",
      why="Leaks and double frees on error paths are invisible to tests that only check results of successful calls.",
      files=["src/com/*.c", "src/pk/*.c", "src/cipher/*.c", "src/digest/*.c"],
      mech=[("goto-cleanup exits, ownership transfer by nulling the local pointer", "constructors, key import and generation"), ("destroy functions", "each module")],
      tech="ownership typestate analysis over LLVM IR",
      note="All paths, all functions as entry points; same engine and limits as P01."),
 dict(id="P03", title="A failed step inside an operation is never reported as success",
      statement="If a step of a library operation fails for lack of memory, for lack of system entropy, or because the data it was given is malformed, "
                "the enclosing operation does not report success or deliver a result as if the step had worked.",
      over=["fault_sequences", "inputs"], forall="every call inside the library of an operation that can fail in these ways, on every path from it to the exit of every enclosing operation",
      why="The failing outcomes are never produced by the tests; a dropped status code changes nothing while everything works.",
      files=["src/com/*.c", "src/pk/*.c"],
      mech=[("status codes propagated through result/goto _EXIT", "all fallible callers")],
      tech="interprocedural error-propagation dataflow over LLVM IR",
      note="Failures that only say that the caller chose too small a destination (size mismatch) are outside the claim. Same engine and limits as P01."),
 dict(id="P04", title="Constructors deliver an object exactly when they report success",
      statement="Every operation that creates an object through an output parameter stores a live, caller-owned object there whenever it reports success. "
                "When it reports an error it leaves the output parameter untouched or null, never pointing at a released or half-built object.",
      over=["fault_sequences", "inputs"], forall="every creating operation (ciphers, digests, random generators, modular contexts, keys, key import), every path",
      why="Tests use the object only after success and never look at the output after an error.",
      files=["src/com/random.c", "src/com/montexpmod.c", "src/pk/rsa.c", "src/pk/asn1.c", "src/cipher/*.c", "src/digest/*.c"],
      mech=[("output assigned as the last step", "all *Create* functions")],
      tech="path-sensitive typestate analysis over LLVM IR",
      note="All paths of all functions with an error code and an object out parameter; same engine and limits as P01."),
 dict(id="P05", title="Key material is erased before its memory is released",
      statement="Destroying a cipher, digest, random-generator, modular-exponentiation or key object overwrites the object's entire memory, including numbers it owns, "
                "before releasing it, in a way an optimising compiler may not remove. Copies of generator state and of system entropy on the stack are erased before the function that made them returns.",
      over=["inputs", "histories", "configurations"], forall="every path to a release of such an object, including the failure paths of constructors after the object was filled; every build configuration",
      why="Released memory and dead stack frames are not observable through the API, so no test can look; the compiler silently removes plain memset before free.",
      files=["src/cipher/*.c", "src/digest/*.c", "src/com/random.c", "src/com/bignumber.c", "src/com/montexpmod.c", "src/pk/rsa.c"],
      mech=[("RaSecureZero (memset through a volatile pointer)", "src/include/racrypt_com.h"), ("destroy functions", "each module")],
      tech="typestate analysis (wiped-before-free) over LLVM IR, with allocation-size invariants",
      note="Covers objects reaching a release in the library; temporaries that were never part of a context or key object are outside the claim."),
 dict(id="P06", title="Objects and calls share no writable state",
      statement="The library keeps no writable global or static state. An operation writes only to the objects and buffers its caller passed, to memory it allocated itself and to its own stack frame; "
                "so operations on different objects may run in any order or at the same time, and neither affects the other's results.",
      over=["schedules", "histories"], forall="every function of the library, every store, every pair of objects and threads",
      why="Tests run one operation at a time on one thread; a static scratch buffer gives the same answers there.",
      files=["src/cipher/*.c", "src/digest/*.c", "src/com/*.c", "src/pk/*.c"],
      mech=[("contexts carry all state", "every context struct"), ("constant tables", "every module")],
      tech="interprocedural may-write (mod/ref) analysis over LLVM IR and inline assembly",
      note="Whole library incl. function pointers and inline assembly, field-insensitive per object; C library functions judged by a table."),
 dict(id="P07", title="Inputs are left as they were",
      statement="No operation writes to memory it receives as an input: keys, messages, initialisation vectors, imported data, source numbers that are not also the destination, "
                "and objects that are only queried or copied from. This includes temporary modification that is undone before returning.",
      over=["inputs", "schedules"], forall="every pointer-to-const parameter of every function, and every pure-input object of the public interface; all paths and callees",
      why="Tests compare outputs and do not look at their inputs afterwards; a change that is undone before return is invisible to any single-threaded test.",
      files=["src/com/bignumber.c", "src/com/gcd.c", "src/com/montexpmod.c", "src/com/prime.c", "src/pk/rsa.c", "src/pk/asn1.c", "src/cipher/*.c", "src/digest/*.c"],
      mech=[("const parameters and const pointers kept in structs", "public headers and asn1.c")],
      tech="interprocedural may-write (mod/ref) analysis over LLVM IR and inline assembly",
      note="All functions; a frozen table lists the pure-input parameters of public functions that are not declared const. In-place use (destination = source) is the caller's choice and is not a violation."),

 dict(id="P08", title="Block ciphers are the published functions for every key and block",
      statement="For every key of every supported length and every block, encryption and decryption give exactly what the published definition of the cipher gives "
                "(AES-128/192/256, DES and two- and three-key triple DES, SEED, ARIA-128/192/256, Blowfish with keys of 1 to 72 bytes), so the two directions are inverse to each other. "
                "This holds in every build configuration, whichever processor instructions are used, and the block functions leave the object as it was.",
      over=["inputs", "configurations"], forall="every key (all 2^64..2^576), every block, each key length, both directions, table-driven, compact-table and AES-NI code",
      why="The tests have one known-answer vector for some of the ciphers and key sizes; the machine running them takes the AES-NI path, so the portable code, the longer keys and rare table entries are never compared with anything.",
      files=["src/cipher/aes.c", "src/cipher/des.c", "src/cipher/seed.c", "src/cipher/aria.c", "src/cipher/blowfish.c"],
      mech=[("key schedules and round functions, lookup tables", "each cipher file"), ("AES-NI inline assembly and processor detection", "src/cipher/aes.c")],
      tech=VN,
      note="All keys and blocks of each listed key length (Blowfish: 3 lengths quick, 7 thorough); equality of canonical value numbers implies equality, inequality is reported only when the two forms evaluate differently; trusts clang's IR and the model of the AES-NI instructions. "
           "Known finding: DES has one wrong S-box entry; DES is accepted only if it equals the published cipher with exactly that entry changed."),
 dict(id="P13", title="Message digests are the published functions for every message",
      statement="For every message the digests (MD2, MD4, MD5, SHA-1, SHA-224/256/384/512, SHA-512/224, SHA-512/256, HAS-160) are those of the published definitions, through object creation as well as "
                "through a caller's own object and the one-call functions. Portable, unrolled and processor-specific code give the same digest.",
      over=["inputs", "configurations"], forall="every message content, for each message length in every case of the padding rule; each algorithm and each of its code paths",
      why="The tests hash two fixed messages, and only the processor-specific path of SHA-1 and SHA-256 runs on the test machine; padding goes wrong only for particular lengths.",
      files=["src/digest/*.c"],
      mech=[("compression functions, padding and length encoding", "each digest file"), ("SHA-NI inline assembly", "src/digest/sha1.c, src/digest/sha2.c")],
      tech=VN,
      note="All messages of each analysed length (quick: around every padding boundary up to two blocks; thorough: every length up to two to three blocks), not all lengths; longer messages rest on P14 and P15. Trusts clang's IR and the model of the SHA instructions."),
 dict(id="P14", title="A digest depends only on the message, not on how or after what it is fed",
      statement="Feeding a message in any number of pieces of any lengths, including empty ones, gives the digest of the whole message. Initialising an object again gives "
                "a fresh start whatever the object was used for before, whether that message was finished or abandoned.",
      over=["inputs", "histories"], forall="every message content; every relation between the bytes already pending, the next piece and the block size; every earlier use of the object",
      why="The tests feed whole messages in one or a few fixed pieces; mistakes in buffering need one particular combination of pending bytes and piece length.",
      files=["src/digest/*.c"],
      mech=[("pending-byte buffer and counters", "update functions of each digest")],
      tech=VN,
      note="All contents for each analysed split (quick: 3 fill levels x 4 second pieces; thorough: all fill levels x 7 second pieces, followed by a third); not all lengths."),
 dict(id="P15", title="Digests of very long messages record the full message length",
      statement="When a message passes 2^29, 2^31, 2^32 or 2^61 bytes (2^64 for SHA-384/512), in one piece or many, the length recorded in the last block, and so the digest, remains the one the published definition demands.",
      over=["histories", "inputs"], forall="every chaining state, every pending data, message lengths at and around each carry of the byte and bit counters",
      why="Reaching the carries takes a message of half a gigabyte to many exabytes.",
      files=["src/digest/md4.c", "src/digest/md5.c", "src/digest/sha1.c", "src/digest/sha2.c", "src/digest/has160.c"],
      mech=[("totalLen_h/totalLen_l(/hh) arithmetic", "update and final functions")],
      tech=VN,
      note="The object starts in a state it can have after the given number of bytes (chaining value and pending bytes arbitrary); 26 (quick) or 90 (thorough) counts per algorithm."),
 dict(id="P16", title="Modes of operation give the published result however the data is fed",
      statement="ECB, CBC, CFB and OFB encryption and decryption with no, zero or PKCS#7 padding give the published mode's output for the whole message, however it is divided into calls, in place or not; "
                "each call returns the number of bytes it produced, and the vector read back is the one for the next block. "
                "Setting the vector starts a new message regardless of an earlier finished or abandoned one, and an object whose vector was never set uses zeros.",
      over=["inputs", "histories"], forall="every key, vector and data; every relation between pending bytes, piece and block size; each mode, direction and padding",
      why="The tests use random pieces of few sizes and compare only the round trip, so an error made symmetrically in both directions, or only for one pending-byte count, goes unseen.",
      files=["src/cipher/block_cipher.c", "src/cipher/aes.c", "src/cipher/des.c", "src/cipher/seed.c", "src/cipher/aria.c", "src/cipher/blowfish.c"],
      mech=[("buffering, mode loops, padding", "src/cipher/block_cipher.c"), ("per-cipher entry points", "each cipher file")],
      tech=VN,
      note="All data for each analysed shape (piece lengths up to about three blocks). In-place use is covered when no bytes are pending. Relative to the cipher's block function (P08)."),
 dict(id="P17", title="PKCS#7 padding is removed exactly when it is well-formed",
      statement="Decrypting the end of a message with PKCS#7 padding shortens the output by the padding length if the last block ends in a well-formed padding of 1 to block-length bytes, and otherwise reports the full length with the data unchanged. "
                "All bytes reported are the decrypted message.",
      over=["inputs"], forall="every last byte value, every single deviation inside the padding, every key, data and division into calls analysed",
      why="Tests only decrypt what they encrypted themselves, so malformed padding never occurs.",
      files=["src/cipher/block_cipher.c"],
      mech=[("padding check at the end of decryption", "src/cipher/block_cipher.c")],
      tech=VN,
      note="All 256 last-byte values (thorough; quick: all up to block size + 2 and samples) and one deviating byte; not all combinations of several deviating bytes. For DES and Blowfish the block function is the library's own, for Blowfish under one key."),
 dict(id="P19", title="The random generator's stream is fixed by its seed and uses the whole seed",
      statement="A seeded generator returns the stream defined by hashing the seed with a running block count, the same however the requests are divided and whatever other generators are used in between, for every digest it can be built on. "
                "A generator that seeds itself takes at least 32 bytes from the operating system, every one of which influences the output, and is not created if the source is missing, fails or returns too little.",
      over=["inputs", "histories"], forall="every seed; every relation between request size, buffered bytes and block size; block counts up to and past each carry; each failure of the entropy source",
      why="Tests only look at whether numbers come out; a generator with half of its seed ignored or repeating after a carry of its block count looks just as random.",
      files=["src/com/random.c"],
      mech=[("seeding, refilling and buffering", "src/com/random.c")],
      tech=VN + "; dependence of the output on each byte of entropy read off the same forms",
      note="All seeds of each analysed length and each analysed division of requests. That the digest chain is unpredictable is cryptographic and not claimed. Thread-safety of the shared default generator is not claimed."),
 dict(id="P21", title="RC4 is the published stream cipher for every key and split",
      statement="For keys of 1 to 256 bytes the output is the data combined with the published RC4 key stream, continuing across calls of any lengths, in place or not, in both directions. Initialising an object again restarts it completely.",
      over=["inputs", "histories"], forall="every key and data; key lengths 1 to 256, piece lengths across the wrap of the internal counters",
      why="The tests use one key length and compare the round trip only; an error made in both directions cancels out.",
      files=["src/cipher/rc4.c"],
      mech=[("key schedule and key stream", "src/cipher/rc4.c")],
      tech=VN,
      note="All keys of each analysed length (14 quick, all 256 thorough) and data of each analysed shape."),
 dict(id="P09", title="Big-number arithmetic is exact",
      statement="Addition, subtraction, multiplication, squaring, doubling, shifts, comparison, bit counting, copying, and arithmetic and division with a single machine word give exactly the integer result for operands of every value and sign, "
                "including when the result replaces an operand or both operands are the same number. "
                "The result has no leading zero words, and operands that are not the result keep their values.",
      over=["inputs", "configurations"], forall="every value of the operands' words, both signs, every aliasing of operands and result, for each analysed length; both word sizes, assembly and portable code",
      why="A lost carry or borrow needs particular values (all-ones words, equal high words) that random tests meet with probability 2^-32 or less; negative operands and aliases are hardly tested.",
      files=["src/com/bignumber.c", "src/include/racrypt_bn.h"],
      mech=[("carry and borrow chains, multiplication", "src/com/bignumber.c"), ("sign handling of signed addition, subtraction, comparison", "src/com/bignumber.c")],
      tech="global value numbering over LLVM IR and inline assembly with a linear normal form for multi-word integers",
      note="All values for operands of 1 to 4 (thorough: 6) words with the position of the highest bit sampled; longer operands repeat the same loops but are not analysed. Long division and remainder by a number of several words, greatest common divisor and modular inverse are outside the claim (their loops depend on the data)."),
 dict(id="P10", title="Conversions of big numbers keep the value",
      statement="Converting machine integers, unsigned byte strings and two's-complement byte strings to big numbers and back keeps the value for every input, including leading zero or sign bytes, the most negative values and zero. "
                "The signed form written is the shortest one, and the byte counts announced beforehand are those written.",
      over=["inputs"], forall="every byte string of each analysed length, every machine integer, every number of each analysed length and sign",
      why="Tests convert random positive numbers; negative powers of two, numbers whose top byte has its highest bit set and redundant sign bytes do not come up.",
      files=["src/com/bignumber.c"],
      mech=[("byte-string conversions and their length computations", "src/com/bignumber.c")],
      tech="global value numbering over LLVM IR with a linear normal form for multi-word integers",
      note="Byte strings of 1 to 17 (thorough 25) bytes with the leading byte sampled and the others unknown; numbers of 1 to 3 words with the position of the highest (and, for negative ones, lowest) set bit sampled."),
 dict(id="P11", title="A result that does not fit is reported, never written past its room",
      statement="When the exact result of a big-number operation or conversion does not fit the room of the destination, the operation reports an error and writes nothing outside the destination. "
                "When it fits, even exactly, the result is complete (multiplication may ask for the room the operands' bit lengths call for).",
      over=["inputs"], forall="every value of the operands, every relation between operand lengths, highest bits and room, for each analysed length",
      why="The tests give every result ample room; a write of one word too many lands in unused memory.",
      files=["src/com/bignumber.c"],
      mech=[("capacity checks before and after the word loops", "src/com/bignumber.c")],
      tech="global value numbering over LLVM IR with bounds of every store; linear normal form for multi-word integers",
      note="Operands of 1 to 3 (thorough 4) words; builds without assertions, where the status is observable. Word-by-word multiplication by an integer into too little room is not covered."),
 dict(id="P12", title="Malformed key data is refused without touching anything outside it",
      statement="Key data that is cut short, has an element of the wrong type, a length that does not match its container, a wrong algorithm name, version or bit-string header, missing or empty numbers or a zero modulus is refused with an error. "
                "No key is delivered, and no byte outside the given data is read.",
      over=["inputs"], forall="every cut position, every structural element (tag, length, fixed content) changed in each of several ways, with the key's numbers unknown; container and bare forms, private and public keys",
      why="Tests import only well-formed keys; a parser that runs past the end of malformed data usually still returns an error or finds harmless bytes.",
      files=["src/pk/asn1.c", "src/pk/rsa.c"],
      mech=[("bounds of the tag and length parser", "src/pk/asn1.c"), ("checks of the parsed structure", "src/pk/rsa.c")],
      tech=VN,
      note="One structural change at a time, key sizes of 128 to 1024 (thorough 1040) bits; contents of the key's numbers unknown. Combinations of several changes and arbitrary byte strings are not covered."),
 dict(id="P18", title="RSA operations use the right integers of the imported key",
      statement="After import, encryption and verification raise the message to the public exponent and decryption and signing to the private exponent, modulo the imported modulus; verification accepts exactly when the power equals the expected number in every word. "
                "A public key refuses private operations, a message longer than the modulus is refused, and the key length reported is the modulus' bit length.",
      over=["inputs"], forall="every value of the key's numbers, message and expected result, for each analysed length; container and bare forms, private and public keys",
      why="Tests use consistent key pairs and check round trips, in which a swapped exponent or a comparison of only part of the result is not noticed.",
      files=["src/pk/rsa.c", "src/pk/asn1.c", "src/com/montexpmod.c"],
      mech=[("key import", "src/pk/rsa.c"), ("operation entry points", "src/pk/rsa.c")],
      tech=VN,
      note="Modular exponentiation is an uninterpreted function of modulus, base and exponent here (its exponent handling is P22; its modular multiplication is not claimed). Key sizes of 9 to 128 (thorough 256) bytes; values unknown except the first byte of each number. Verification is decided for results of two or more words, with the expected number's length sampled."),
 dict(id="P20", title="Exported keys are canonical DER and import back to the same key",
      statement="Exporting an imported key writes the canonical DER encoding of exactly its numbers in the standard container (PKCS#8 or SubjectPublicKeyInfo), whatever redundant encoding the key was imported from. "
                "The size announced is the size written; with too little room the export reports failure and writes nothing past the buffer.",
      over=["inputs"], forall="every value of the key's numbers for each analysed length, on both sides of each change in the length encoding; every buffer size analysed around the size needed",
      why="Tests export and re-import random 512- to 2048-bit keys into ample buffers; numbers of unusual lengths and buffers one byte short do not occur.",
      files=["src/pk/rsa.c", "src/pk/asn1.c", "src/com/bignumber.c"],
      mech=[("length computation and encoding of structures", "src/pk/asn1.c, src/pk/rsa.c")],
      tech=VN,
      note="Key sizes of 9 to 129 (thorough 257) bytes incl. those where DER length forms change; values unknown except the first byte of each number."),
 dict(id="P22", title="Modular exponentiation computes exactly the power asked for",
      statement="For every exponent, the sequence of modular squarings and multiplications carried out yields base to exactly that exponent, "
                "including zero and one, exponents with long runs of zero or one bits, and bit windows that cross word boundaries or are open at the end. The conversion factor of the modular representation is removed exactly once.",
      over=["inputs"], forall="every exponent of the analysed number of words (all bit patterns), any base and modulus",
      why="There are 2^64 and more exponents and the tests use a few random ones; a mistake for, say, a zero word below an open window needs a pattern that random exponents never contain.",
      files=["src/com/montexpmod.c"],
      mech=[("sliding-window exponentiation", "src/com/montexpmod.c")],
      tech="abstract interpretation over LLVM IR (exponent of each intermediate number as an affine function of the exponent bits read, to a fixpoint)",
      note="All exponents of 1 to 3 (32-bit words: 4; thorough: 5) words, all at once. Assumes each modular multiplication, squaring, conversion and reduction computes the product it is named for."),
 dict(id="P23", title="Generated RSA keys are consistent; the key check accepts exactly consistent keys",
      statement="A generated key has a modulus of exactly the requested length that is the product of two different primes, and its exponents and coefficient are those the defining equations give for these primes and the public exponent 65537; encryption and decryption with it use these numbers. "
                "The key check accepts a private key, with factors whose lengths add up to that of the modulus, exactly when both factors pass the primality test and every other number of the key satisfies its defining equation.",
      over=["inputs", "histories"], forall="every pair of primes of the requested length, including sequences of candidates that must be rejected; every value of each number of the checked key",
      why="The tests only encrypt and decrypt with a few generated keys, which never touches the numbers kept for other programs; equal primes never occur, and no inconsistent key is ever checked.",
      files=["src/pk/rsa.c"],
      mech=[("key generation", "src/pk/rsa.c"), ("key check", "src/pk/rsa.c"), ("construction and destruction of keys", "src/pk/rsa.c")],
      tech=VN,
      note="Moduli of 80 to 512 bits (multiples of 16 bits); four sequences of candidate primes; the checked key has one number in turn unknown. Assumes that prime generation, primality test, remainder, inverse and modular exponentiation compute what they are named for."),
 dict(id="P24", title="Random numbers have exactly the bits asked for",
      statement="A random number of n bits consists of n bits of the generator's output, each used once, and zeros above; odd numbers have the lowest bit set, and numbers of full length the lowest and the highest. "
                "The result has no leading zero words and is never negative, whatever the number held before. A failing generator, too little room, and a full-length number of no bits are reported as errors.",
      over=["inputs", "configurations"], forall="every output of the generator and every previous content of the number; lengths at, below and above word boundaries, both word sizes",
      why="The tests only see random numbers of two lengths that are multiples of the word, and a top word of zero occurs once in 2^64.",
      files=["src/com/bignumber.c"],
      mech=[("random numbers", "src/com/bignumber.c")],
      tech=VN,
      note="Lengths of 1 to 192 bits (23 quick, all up to 199 thorough) and 512 to 2048 bits; the generator's output is unknown."),
 dict(id="P25", title="The primality test accepts exactly what every round of Miller-Rabin accepts",
      statement="A number is accepted as prime exactly if it is two, or odd, greater than one, and passes five rounds (three from 1024 bits on) of the Miller-Rabin test, each with its own random base between 2 and the number less two. "
                "Zero, one and other even numbers are rejected. Prime generation returns the first candidate that passes as many rounds and reports errors of its steps.",
      over=["inputs", "histories"], forall="every assignment of outcomes to the powers the test asks for among those analysed; every value of the middle digits of number and bases; numbers one more than multiples of powers of two across word boundaries",
      why="Composite numbers that pass some rounds, bases that must be rejected and numbers with whole zero words below n-1 practically never occur in tests.",
      files=["src/com/prime.c"],
      mech=[("primality test", "src/com/prime.c"), ("prime generation", "src/com/prime.c")],
      tech=VN,
      note="Numbers of 16, 32 and 128 bytes (thorough: also 48, 127, 136), n-1 divisible by 2 to 2^65 exactly. Modular exponentiation is an uninterpreted function of its arguments, the sieve for candidates is not looked into."),
dict(id="P26", title="Greatest common divisor and modular inverse are exact",
      statement="The greatest common divisor and the two coefficients of the extended algorithm are those of the mathematical definition for all positive operands, in either order of size. "
                "When non-negative coefficients are asked for, each lies in the range of remainders of the other operand, so that for coprime operands it is the modular inverse. "
                "Results that are not asked for may be left out, no intermediate result runs out of room, and an operand of zero is refused.",
      over=["inputs"], forall="all pairs of positive operands whose Euclidean algorithm takes the analysed number of divisions (any quotients, any greatest common divisor); every combination of results asked for",
      why="The tests compute one divisor and one pair of coefficients; keys only ever use one coefficient with operands in one order of size, and the sign of the coefficients alternates with the number of divisions.",
      files=["src/com/gcd.c"],
      mech=[("extended Euclid", "src/com/gcd.c"), ("Euclid", "src/com/gcd.c")],
      tech="abstract interpretation over LLVM IR (numbers as integer polynomials in the greatest common divisor and the quotients of the run)",
      note="1 to 9 (thorough 16) divisions; room is judged for four patterns of operand lengths each. Assumes that addition, subtraction, multiplication, comparison and division of big numbers are exact (P09; division is N01)."),
 dict(id="N01", title="Long division and remainder are exact",
      statement="Dividing by a number of several words gives the exact quotient and remainder for all operands.",
      over=["inputs"], forall="every pair of operands", why="Quotient-digit corrections occur for about one in 2^64 random operands.",
      files=["src/com/bignumber.c"], mech=[("quotient estimate and correction", "src/com/bignumber.c")],
      tech="", note="",
      na="Each quotient digit depends on the values; no linear normal form or interval argument in reach bounds the estimate's error, and enumerating values would be testing. Division by a single word is part of P09; memory safety, leaks, errors and input preservation of the same functions are covered by P01-P03, P07."),
 dict(id="N02", title="Modular multiplication in Montgomery form is exact",
      statement="Each modular multiplication, squaring and reduction gives a number congruent to the exact product times the inverse of the conversion factor, below the modulus or the documented bound, for all operands and odd moduli.",
      over=["inputs"], forall="every odd modulus and operands", why="A wrong final subtraction needs operands with probability 2^-64.",
      files=["src/com/montexpmod.c"], mech=[("interleaved reduction and final subtraction", "src/com/montexpmod.c")],
      tech="", note="",
      na="The argument is a congruence (m*N cancels the low word because of the inverse computed earlier), which is non-linear in two unknowns; a normal form that decides it was tried and did not terminate within the budget even for one word, and sampling operands would be testing. P22 takes it as an assumption."),
 dict(id="N03", title="The search for primes ends and errs with negligible probability",
      statement="Generated primes have the requested length and are composite only with negligible probability, and the search for them ends.",
      over=["inputs", "histories"], forall="every random stream", why="Tests generate a few keys.",
      files=["src/com/prime.c"], mech=[("Miller-Rabin rounds", "src/com/prime.c")],
      tech="", note="",
      na="The error bound is a number-theoretic statement over random choices, and termination of the search depends on the random stream; neither follows from dataflow over the source. The rounds of the test are covered by P25, key generation by P23, error handling, ownership and erasure by P01-P05."),
 dict(id="N04", title="Running time does not depend on secrets",
      statement="Operations on secret keys take time and touch memory independently of the secret's value.",
      over=["inputs"], forall="every pair of secrets", why="Timing is not observed by tests.",
      files=["src/com/montexpmod.c", "src/cipher/aes.c"], mech=[("windowed exponentiation, table look-ups", "src/com/montexpmod.c, src/cipher/*.c")],
      tech="", note="",
      na="The library does not aim at it: table look-ups indexed by key-dependent bytes and branches on exponent bits are its design (a taint analysis would flag every cipher), so it is not a property that holds or is promised here."),
]
