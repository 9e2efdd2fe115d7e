SPECIFICATION Spec
CONSTANTS Base = 2  Limbs = 2  WLen = 97  MaxIn = 2  MaxOut = 2  Txs = {1}  Coms = {1}
 Wits = {"none", "ok1", "else"}
INVARIANTS Sound Complete Overflow
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
