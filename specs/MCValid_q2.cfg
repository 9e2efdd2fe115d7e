SPECIFICATION Spec
CONSTANTS Base = 2  Limbs = 1  WLen = 97  MaxIn = 2  MaxOut = 1  Txs = {1}  Coms <- Coms2
 Wits = {"none", "type", "long", "cut", "bad", "ok1", "ok2", "by2", "else"}
INVARIANTS Sound Complete Overflow
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
