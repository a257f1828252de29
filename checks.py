"""What each check builds and runs."""
import checks_num as N, checks_hist as Hi, checks_misc as Mi
CHECKS = {k: getattr(M, k) for M in (N, Hi, Mi) for k in dir(M) if k[0] == "C" and k[1:].isdigit()}

CHECKS["C11"] = Mi.with_misuse(CHECKS["C11"])
CHECKS["C16"] = Mi.with_others(CHECKS["C16"])
