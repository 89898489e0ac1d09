---- MODULE GuardTrace ----
EXTENDS OneShotTrace
====
