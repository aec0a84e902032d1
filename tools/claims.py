C = 'contract-based deductive verification: contracts (pre/post, loop invariants, frames) on the C functions, weakest preconditions from the clang AST of the current source, discharged by z3/cvc5; contracts also evaluated on the compiled functions'
CN = 'all inputs and iterations; see DESIGN.md for assumptions'
PY = 'contract-based deductive verification: contracts on the Python functions, verification conditions from executing the current source on symbolic values (all paths), discharged by z3/cvc5; the same statements also run on the real code'
CLAIM = {}
NA = {}
for i in ('C01', 'C02', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C26'): CLAIM[i] = (C, 'proof', CN)
for i in ('C05', 'C06', 'C22', 'C23', 'C24'): CLAIM[i] = (PY, 'proof', CN)
