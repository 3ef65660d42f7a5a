----------------------------- MODULE SettingsMC -----------------------------
EXTENDS Settings
ASSUME Table
=============================================================================
