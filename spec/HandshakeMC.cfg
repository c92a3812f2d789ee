CONSTANTS MaxTickets = 2
          LenBytes = 1
          Alphabet = {0, 1, 4, 24}
          MaxStream = 7
          MaxPiece = 3
SPECIFICATION Spec
INVARIANTS FragmentationIndependent FlagsExact RejectsExactly TicketsExact
PROPERTY DeadStays
CHECK_DEADLOCK FALSE
