"""Generation and checking of RSA keys."""
from .. import jobs
from ..keyjobs import NAMES, keycheck, keygen

PRIMES = (((1, 0xc5), (2, 0xe3)),                                   # accepted at once
          ((1, 0xe3), (2, 0xc5)),
          ((1, 0xc5), (1, 0xc5), (2, 0xe3)),                        # the same prime twice
          ((1, 0x81), (2, 0x83), (3, 0xff), (4, 0xc0)))             # a product that is one bit short


def run(c):
    c.rule("Global value numbering of key generation, key export, encryption and decryption in one run, and of key import followed by the key check; prime "
           "generation, primality test, remainder, inverse and modular exponentiation are uninterpreted functions of their arguments. Every number of a new "
           "key and every result must have the value number of its defining expression in the two primes; the verdict of the key check must be that of the "
           "defining equations, with each number of the key in turn unknown.")
    c.assumptions.append("prime generation, primality test, remainder, inverse and modular exponentiation compute what they are named for")
    js = []
    for v in ("default", "word32", "ndebug", "word32-ndebug") if c.thorough else ("default", "word32"):
        for bit in (80, 112, 128, 144, 208, 256, 384, 512) if c.thorough else (80, 128, 144, 256):
            for p in PRIMES:
                js.append(keygen(v, bit, p))
        if not c.thorough and v == "default":
            js.append(keygen(v, 512, PRIMES[0]))
        for bit in (144, 208, 256, 384, 512) if c.thorough else (208, 256) if v == "default" else (208,):
            for wrong in range(-1, len(NAMES)):
                js.append(keycheck(v, bit, wrong))
            for a in ((0, -6), (-6, 0), (-6, -6)):
                js.append(keycheck(v, bit, -1, a))
    jobs.report(c, jobs.run(js, 800 if c.thorough else 300))
    c.need("configurations", 20)
