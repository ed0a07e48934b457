INIT Init
NEXT ProgNext
CHECK_DEADLOCK FALSE
