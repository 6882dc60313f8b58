------------------------------- MODULE SearchMC -------------------------------
EXTENDS Search
MCParams == [ms : 0..6, sz : 0..5, ratio : 0..2]
NoHistView == <<par, phase, nS, nD, recent, size>>
===============================================================================
