----------------------------- MODULE MCMaxwell -----------------------------
EXTENDS MaxwellProto
=============================================================================
