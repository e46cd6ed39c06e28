-------------------------------- MODULE Plot -------------------------------
(* What a plot shows, as a decision table over the options of plot_map:     *)
(* which pixels are blank, which colour range applies, what is written.     *)
EXTENDS Integers, Sequences, FiniteSets
Ends == {"none", "zero", "value"}
Masks == {"none", "empty", "some", "all"}
Options == [cbar : BOOLEAN, over : BOOLEAN, centre : BOOLEAN, title : BOOLEAN, vmin : Ends, vmax : Ends, mask : Masks]
Sensible(o) == ~(o.vmin = "zero" /\ o.vmax = "zero")
\* where each end of the colour range comes from
Low(o)  == IF o.centre THEN "centred" ELSE IF o.vmin = "none" THEN "least" ELSE "asked"
High(o) == IF o.centre THEN "centred" ELSE IF o.vmax = "none" THEN "greatest" ELSE "asked"
Axes(o) == IF o.cbar THEN 2 ELSE 1
\* a figure of a session is new, and figures made earlier keep what they show
NewFigure(seen, f) == f \notin seen
\* the sample marked in an evolution plot
Marks(lp) == { k \in 1..Len(lp) : \A m \in 1..Len(lp) : lp[m] <= lp[k] }
=============================================================================
