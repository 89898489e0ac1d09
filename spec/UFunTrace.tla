---- MODULE UFunTrace ----
EXTENDS OneShotTrace
====
