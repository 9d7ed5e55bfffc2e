"""All randomness of a check comes from VERIF_SEED through these streams."""

import hashlib
import random


def derive(*parts) -> int:
    text = "/".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def stream(*parts) -> random.Random:
    return random.Random(derive(*parts))
