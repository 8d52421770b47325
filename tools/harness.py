"""Layer B: which search program covers which property; seconds for (quick, thorough)."""
def hc(q=40, t=300): return [{"crate": "hc", "bin": "hc", "seconds": (q, t)}]
def ht(q=40, t=300): return [{"crate": "ht", "bin": "ht", "seconds": (q, t)}]
HARNESS = {p: hc() for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C20", "C21", "C23", "C27")}
HARNESS.update({p: ht() for p in ("C18", "C19", "C22", "C24", "C26", "C28")})
HARNESS["C14"] = hc(30, 200) + ht(25, 200)     # one connection driven directly; a server on a socket
