---------------------------- MODULE MCRingDeque ----------------------------
EXTENDS RingDeque
Short == Size <= 5
=============================================================================
