SPECIFICATION Spec
CONSTANTS Attempts = 3
 ResetUs = 50000
 WaitUs = 450
