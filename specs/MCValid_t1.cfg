SPECIFICATION Spec
CONSTANTS Base = 2  Limbs = 2  WLen = 97  MaxIn = 3  MaxOut = 2  Txs = {1}  Coms = {1}
 Wits = {"ok1", "else"}
INVARIANTS Sound Complete Overflow
VIEW View
CHECK_DEADLOCK FALSE
