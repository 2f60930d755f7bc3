--------------------------- MODULE DeprecationOps ---------------------------
(* Deprecated argument names: what each one stands for.                       *)
(* A name is a path <<"sinusoidal", "tracker", "h">> (sinusoidal__tracker__h).*)
(* The layers of the system: the sinusoidal model, the modal model (which has *)
(* all names of the former too), the whole model, the remapper and functions. *)
EXTENDS Integers, Sequences, FiniteSets
Tr(x) == <<"tracker", x>>
SinRules == [ max_n_sines |-> Tr("max_n_sines"), min_sine_dur |-> Tr("min_sine_dur"),
              safe_sine_len |-> Tr("min_sine_dur"),
              freq_dev_offset |-> Tr("freq_dev_offset"),
              freq_dev_slope |-> Tr("freq_dev_slope"),
              sine_tracker_cls |-> <<"tracker">>,
              save_intermediate |-> <<"intermediate", "save">>,
              fs |-> Tr("fs"), h |-> Tr("h") ]
ModRules == [ reverse |-> Tr("reverse"), frequency_bounds |-> Tr("frequency_bounds"),
              peak_threshold |-> Tr("peak_threshold"),
              merge_strategy |-> Tr("merge_strategy"), strip_t |-> Tr("strip_t") ]
RemapNames == {"log_n", "wtype", "wsize", "overlap"}
FunRules == [ analytical |-> <<"analytic">> ]
OptRules == [ sample_fn |-> <<"model">>, sample_kw |-> <<"model">> ]

One(rules, p) == IF Len(p) = 1 /\ p[1] \in DOMAIN rules THEN <<rules[p[1]]>> ELSE <<>>
\* the replacement of a name at a layer, <<>> if the name is current
Sin(p) == One(SinRules, p)
Mod(p) == IF One(ModRules, p) # <<>> THEN One(ModRules, p) ELSE Sin(p)

\* [name: final name at the outermost layer, warns: seq of <<old, new>>]
Layer(layer, p) ==
  LET Sub(q) == IF q = <<>> THEN [name |-> p, warns |-> <<>>]
                ELSE [name |-> q[1], warns |-> << <<p, q[1]>> >>]
  IN CASE layer = "sinusoidal" -> Sub(Sin(p))
       [] layer = "modal" -> Sub(Mod(p))
       [] layer = "function" -> Sub(One(FunRules, p))
       [] layer = "optimizer" -> Sub(One(OptRules, p))
       [] layer = "remapper" ->
            IF Len(p) = 2 /\ p[1] = "sinusoidal_model" /\ p[2] \in RemapNames
            THEN Sub(<< <<"sinusoidal", p[2]>> >>) ELSE Sub(<<>>)
       [] layer = "sample" ->
            LET q == IF p[1] = "sinusoidal_model"
                     THEN <<"sinusoidal">> \o Tail(p) ELSE p
                w == IF q # p THEN << <<p, q>> >> ELSE <<>>
                in == IF q[1] = "sinusoidal" /\ Len(q) > 1 THEN Mod(Tail(q)) ELSE <<>>
            IN IF in = <<>> THEN [name |-> q, warns |-> w]
               ELSE [name |-> <<"sinusoidal">> \o in[1],
                     warns |-> Append(w, <<Tail(q), in[1]>>)]
=============================================================================
