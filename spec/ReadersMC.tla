------------------------------ MODULE ReadersMC ------------------------------
EXTENDS Readers
Q3 == <<1, 4, 8>>
=============================================================================
