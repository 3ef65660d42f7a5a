------------------------------ MODULE ModelMC -------------------------------
EXTENDS Model
=============================================================================
