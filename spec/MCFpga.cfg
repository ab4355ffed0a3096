SPECIFICATION Spec
CONSTANTS Attempts = 3
 ResetUs = 5
 WaitUs = 2
 NBytes = 2
 MaxPoll = 3
 Inverted = FALSE
INVARIANT Legal
PROPERTY Ends
