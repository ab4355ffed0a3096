SPECIFICATION Spec
CONSTANTS Attempts = 3
 ResetUs = 5
 WaitUs = 9
 NBytes = 2
 MaxPoll = 10
 Inverted = FALSE
INVARIANT Legal
PROPERTY Ends
