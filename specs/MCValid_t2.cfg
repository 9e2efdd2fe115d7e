SPECIFICATION Spec
CONSTANTS Base = 3  Limbs = 1  WLen = 97  MaxIn = 2  MaxOut = 2  Txs = {1, 2}  Coms <- Coms2
 Wits = {"none", "type", "long", "cut", "bad", "ok1", "ok2", "by2", "else"}
INVARIANTS Sound Complete Overflow
VIEW View
CHECK_DEADLOCK FALSE
