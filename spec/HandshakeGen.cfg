CONSTANTS MaxTickets = 5
          LenBytes = 3
          Catalogue = 0
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
