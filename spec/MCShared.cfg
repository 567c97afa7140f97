INIT SInit
NEXT SNext
INVARIANTS AsAlone
