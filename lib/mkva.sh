#!/bin/bash
# writes the MCVoiceAllocator_*.cfg files (committed output)
cd "$(dirname "$0")/../spec"
mk() { cat > MCVoiceAllocator_$1.cfg <<E
INIT MCInit
NEXT MCNext
CONSTANTS
  NV = $2
  Notes = $3
  MaxDepth = $4
  StartMode = $5
  Steals = $6
  Extra = $7
  MaxAge = $8
ACTION_CONSTRAINT ${9:-Emit}
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
E
}
ALLM='{"oldest", "quietest", "highest", "lowest", "never"}'
mk poly 3 '{0, 60, 61, 62}' 9 '{"poly"}' '{"oldest", "never"}' '{"max", "reset"}' 0
mk steal 3 '{60, 62, 64, 65}' 8 '{"poly"}' "$ALLM" '{"age", "loud"}' 2
mk sustain 2 '{0, 60, 61}' 9 '{"poly", "mono"}' '{"oldest", "never"}' '{"pedal", "midi"}' 0
mk mono 2 '{0, 60, 61}' 9 '{"mono", "legato", "unison"}' '{"oldest"}' '{"pedal", "max", "mode", "reset"}' 0
mk steal_sim 6 '{0, 40, 60, 62, 64, 65, 70, 90, 127}' 50 '{"poly"}' "$ALLM" '{"age", "loud", "max"}' 40 EmitLast
mk poly_sim 5 '{0, 40, 60, 62, 64, 65, 70, 90, 127}' 50 '{"poly"}' '{"oldest", "lowest", "never"}' '{"age", "max", "reset"}' 40 EmitLast
mk sustain_sim 4 '{0, 60, 62, 64, 65, 127}' 50 '{"poly", "mono", "legato", "unison"}' '{"oldest", "lowest", "never"}' '{"age", "pedal", "midi"}' 40 EmitLast
mk mono_sim 4 '{0, 60, 62, 64, 65, 127}' 50 '{"mono", "legato", "unison"}' '{"oldest"}' '{"pedal", "max", "mode", "reset", "midi"}' 40 EmitLast
mk poly_thorough 3 '{0, 60, 61, 62}' 11 '{"poly"}' '{"oldest", "never"}' '{"max", "reset"}' 0
mk steal_thorough 3 '{60, 62, 64, 65}' 9 '{"poly"}' "$ALLM" '{"age", "loud"}' 2
mk sustain_thorough 3 '{0, 60, 61}' 11 '{"poly", "mono"}' '{"oldest", "never"}' '{"pedal", "midi"}' 0
mk mono_thorough 3 '{0, 60, 61}' 11 '{"mono", "legato", "unison"}' '{"oldest"}' '{"pedal", "max", "mode", "reset"}' 0
