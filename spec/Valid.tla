-------------------------------- MODULE Valid --------------------------------
(***************************************************************************)
(* Which kinds of value each documented parameter of write_input accepts   *)
(* (user guide: "Input parameters").  Kinds: none int float str list tuple *)
(* ndarray dict npint npfloat object.  (A boolean where a number is        *)
(* expected is left open.)                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
Ints == {"int", "npint"}
Nums == Ints \cup {"float", "npfloat"}
Arr  == {"list", "tuple", "ndarray"}
Accept == [int |-> Ints, scalar |-> Nums, str |-> {"str"}, bool |-> {"bool"}, dict |-> {"dict"}, array |-> Arr,
           strint |-> Ints \cup {"str"}, nums |-> Nums \cup Arr, strs |-> {"str"} \cup Arr]
Kinds == {"int","npint","float","npfloat","str","bool","dict","list","tuple","ndarray","object"}
\* kinds whose refusal is certain
Refused(t) == (Kinds \ Accept[t]) \ (IF t \in {"int","scalar","nums","strint"} THEN {"bool"} ELSE {})

Rocks == [density |-> "scalar", porosity |-> "scalar", permeability |-> "nums", conductivity |-> "scalar",
   specific_heat |-> "scalar", compressibility |-> "scalar", expansivity |-> "scalar", conductivity_dry |-> "scalar",
   tortuosity |-> "scalar", klinkenberg_parameter |-> "scalar", distribution_coefficient_3 |-> "scalar",
   distribution_coefficient_4 |-> "scalar", initial_condition |-> "array", relative_permeability |-> "dict",
   capillarity |-> "dict", permeability_model |-> "dict", equivalent_pore_pressure |-> "dict"]
Model == [id |-> "int", parameters |-> "array"]
\* path of the dictionary that holds the parameter -> parameter -> type
Table == [
  top |-> [title |-> "strs", eos |-> "str", n_component |-> "int", n_phase |-> "int", n_component_mass |-> "int",
     flac |-> "dict", isothermal |-> "bool", start |-> "bool", nover |-> "bool", rocks |-> "dict", rocks_order |-> "array",
     options |-> "dict", extra_options |-> "dict", more_options |-> "dict", selections |-> "dict", solver |-> "dict",
     generators |-> "dict", times |-> "nums", element_history |-> "array", connection_history |-> "array",
     generator_history |-> "array", diffusion |-> "array", output |-> "dict", elements |-> "dict",
     elements_order |-> "array", coordinates |-> "bool", connections |-> "dict", connections_order |-> "array",
     initial_conditions |-> "dict", initial_conditions_order |-> "array", default |-> "dict"],
  rocks |-> Rocks, default |-> Rocks,
  rocks_rp |-> Model, rocks_cp |-> Model, rocks_pm |-> Model, rocks_ep |-> Model,
  default_rp |-> Model, default_cp |-> Model, default_pm |-> Model, default_ep |-> Model,
  flac |-> [creep |-> "bool", porosity_model |-> "int", version |-> "int"],
  options |-> [n_iteration |-> "int", n_cycle |-> "int", n_second |-> "int", n_cycle_print |-> "int", verbosity |-> "int",
     temperature_dependence_gas |-> "scalar", effective_strength_vapor |-> "scalar", t_ini |-> "scalar", t_max |-> "scalar",
     t_steps |-> "nums", t_step_max |-> "scalar", t_reduce_factor |-> "scalar", gravity |-> "scalar",
     mesh_scale_factor |-> "scalar", eps1 |-> "scalar", eps2 |-> "scalar", w_upstream |-> "scalar", w_newton |-> "scalar",
     derivative_factor |-> "scalar"],
  extra_options |-> ("1" :> "int") @@ ("13" :> "int") @@ ("24" :> "int"),
  more_options |-> ("1" :> "int") @@ ("17" :> "int") @@ ("40" :> "int"),
  selections |-> [integers |-> "dict", floats |-> "array"],
  solver |-> [method |-> "int", z_precond |-> "str", o_precond |-> "str", rel_iter_max |-> "scalar", eps |-> "scalar"],
  generators |-> [name |-> "strs", nseq |-> "nums", nadd |-> "nums", nads |-> "nums", type |-> "strs", times |-> "nums",
     rates |-> "nums", specific_enthalpy |-> "nums", layer_thickness |-> "nums"],
  output |-> [format |-> "str", variables |-> "dict"],
  elements |-> [nseq |-> "int", nadd |-> "int", material |-> "strint", volume |-> "scalar", heat_exchange_area |-> "scalar",
     permeability_modifier |-> "scalar", center |-> "array"],
  connections |-> [nseq |-> "int", nadd |-> "array", permeability_direction |-> "int", nodal_distances |-> "array",
     interface_area |-> "scalar", gravity_cosine_angle |-> "scalar", radiant_emittance_factor |-> "scalar"],
  initial_conditions |-> [porosity |-> "scalar", userx |-> "array", values |-> "array"]]
=============================================================================
