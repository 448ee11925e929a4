SPECIFICATION ISpec
CONSTANTS
 MaxL = 4
 Upto = 3
