CONSTANTS MaxTickets = 5
          LenBytes = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
