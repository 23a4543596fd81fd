------------------------------ MODULE MCBalance ------------------------------
EXTENDS Balance
=============================================================================
