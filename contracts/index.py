"""Which contract modules decide which property."""
MODULES = {
    "C02": ["states"],
    "C03": ["filters"],
    "C04": ["states"],
    "C06": ["tracers", "contexts"],
    "C07": ["contexts"],
    "C08": ["contexts"],
    "C09": ["containers", "tracers"],
    "C10": ["containers"],
    "C11": ["dcs"],
    "C12": ["pytrees"],
    "C17": ["spmd"],
    "C18": ["spmd"],
    "C21": ["modseq"],
    "C22": ["trainstate"],
    "C23": ["moddefs"],
    "C24": ["dcs"],
    "C19": ["nn"],
    "C13": ["calls13", "graph"],
    "C05": ["updates", "states"],
    "C14": ["sow"],
    "C20": ["layers"],
}


def load(prop):
  """-> (specs of the property, registry of callee contracts, axioms)"""
  import importlib
  from pyded.spec import Contract
  specs, reg, ax = [], {}, []
  seen = []

  def visit(name):
    if name in seen:
      return
    m = importlib.import_module("contracts." + name)
    for u in getattr(m, "USES", ()):
      visit(u)
    seen.append(name)
    a = getattr(m, "AXIOMS", ())
    ax.extend(a() if callable(a) else a)
    for s in m.SPECS:
      s.module = name
      if isinstance(s, Contract) and getattr(s, "callable", True):
        reg[s.target] = s
      if prop in getattr(s, "props", ()):
        specs.append(s)
  for name in MODULES.get(prop, ()):
    visit(name)
  return specs, reg, ax
