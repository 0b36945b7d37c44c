----------------------------- MODULE MCResolver -----------------------------
(* exhaustive check of module Resolver on the systematic family of worlds *)
EXTENDS ResolverWorlds
VARIABLES cfg, phase, open, built, trusted, result
MCWorlds == NoDefect \cup OneDefect \cup Pairs(PairEvery, PairOff)
INSTANCE Resolver WITH Worlds <- MCWorlds
=============================================================================
