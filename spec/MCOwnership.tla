----------------------------- MODULE MCOwnership ----------------------------
EXTENDS Ownership
\* s://u:p@h:1/a/b?k=v&l#f and the same shape in other letters
AllTexts == { <<115,58,47,47,117,58,112,64,104,58,49,47,97,47,98,63,107,61,118,38,108,35,102>>,
              <<116,58,47,47,118,58,113,64,105,58,50,47,99,47,100,63,109,61,119,38,110,35,103>> }
=============================================================================
