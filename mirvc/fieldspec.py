"""Prime fields of the repository: moduli are mathematical constants of the property, not read from the code."""
from .engine import Fld
R = 1 << 256
FIELDS = {
  "bn_fq": ("halo2curves::bn256::Fq", 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47),
  "bn_fr": ("halo2curves::bn256::Fr", 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001),
  "secp_fp": ("halo2curves::secp256k1::Fp", 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f),
  "secp_fq": ("halo2curves::secp256k1::Fq", 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141),
}
FLD = {k: Fld(n, p, R % p) for k, (n, p) in FIELDS.items()}
