SPECIFICATION Spec
INVARIANTS LnInv ExpInv DivInv ChiInv
