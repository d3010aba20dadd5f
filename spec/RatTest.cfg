SPECIFICATION Spec
CONSTANT B = 5
INVARIANT Agree
