-------------------------------- MODULE PyMsh --------------------------------
(***************************************************************************)
(* The objects the Python module hands out.  Each is one C++ structure; its *)
(* attributes are the fields of that structure under the same names, and    *)
(* there is one value behind both: what Python assigns C++ sees, and the    *)
(* other way round.  Members that are structures are shared, not copied.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANT MaxSteps

VARIABLES cls,     \* class of the object at hand
          val,     \* path -> number of the step that wrote it last (0: default)
          hist     \* the steps
vars == << cls, val, hist >>

Box(b) == << <<"tag", "int">>, <<"min_x", "real">>, <<"min_y", "real">>, <<"min_z", "real">>, <<"max_x", "real">>, <<"max_y", "real">>,
             <<"max_z", "real">>, <<"physical_group_tags", "ints">>, <<b, "ints">> >>
(* name, then kind: a scalar, a list of scalars, another class, or a list of one *)
Classes ==
    [ MeshFormat |-> << <<"version", "str">>, <<"file_type", "int">>, <<"data_size", "int">> >>,
      NodeBlock |-> << <<"entity_dim", "int">>, <<"entity_tag", "int">>, <<"parametric", "int">>, <<"num_nodes_in_block", "size">>,
                       <<"tags", "sizes">>, <<"data", "reals">> >>,
      Nodes |-> << <<"num_entity_blocks", "size">>, <<"num_nodes", "size">>, <<"min_node_tag", "size">>, <<"max_node_tag", "size">>,
                   <<"entity_blocks", "list", "NodeBlock">> >>,
      ElementBlock |-> << <<"entity_dim", "int">>, <<"entity_tag", "int">>, <<"element_type", "int">>,
                          <<"num_elements_in_block", "size">>, <<"data", "sizes">> >>,
      Elements |-> << <<"num_entity_blocks", "size">>, <<"num_elements", "size">>, <<"min_element_tag", "size">>,
                      <<"max_element_tag", "size">>, <<"entity_blocks", "list", "ElementBlock">> >>,
      DataHeader |-> << <<"string_tags", "strs">>, <<"real_tags", "reals">>, <<"int_tags", "ints">> >>,
      DataEntry |-> << <<"tag", "size">>, <<"num_nodes_per_element", "int">>, <<"data", "reals">> >>,
      Data |-> << <<"header", "class", "DataHeader">>, <<"entries", "list", "DataEntry">> >>,
      PointEntity |-> << <<"tag", "int">>, <<"x", "real">>, <<"y", "real">>, <<"z", "real">>, <<"physical_group_tags", "ints">> >>,
      CurveEntity |-> Box("boundary_point_tags"),
      SurfaceEntity |-> Box("boundary_curve_tags"),
      VolumeEntity |-> Box("boundary_surface_tags"),
      Entities |-> << <<"points", "list", "PointEntity">>, <<"curves", "list", "CurveEntity">>,
                      <<"surfaces", "list", "SurfaceEntity">>, <<"volumes", "list", "VolumeEntity">> >>,
      PhysicalGroup |-> << <<"dim", "int">>, <<"tag", "int">>, <<"name", "str">> >>,
      MshSpec |-> << <<"mesh_format", "class", "MeshFormat">>, <<"nodes", "class", "Nodes">>, <<"elements", "class", "Elements">>,
                     <<"entities", "class", "Entities">>, <<"physical_groups", "list", "PhysicalGroup">>,
                     <<"node_data", "list", "Data">>, <<"element_data", "list", "Data">>, <<"element_node_data", "list", "Data">> >> ]
Functions == {"load_msh", "save_msh", "validate_spec", "nodes_per_element", "get_element_dim"}

Fields(c) == { Classes[c][i] : i \in 1..Len(Classes[c]) }
(* Members of class type are one level deep. *)
Leaves(c) == { <<f[1]>> : f \in { g \in Fields(c) : g[2] # "class" } }
             \cup UNION { { <<f[1], g[1]>> : g \in Fields(f[3]) } : f \in { g \in Fields(c) : g[2] = "class" } }
Members(c) == { f \in Fields(c) : f[2] = "class" }

PyInit == /\ cls \in DOMAIN Classes
          /\ val = [p \in Leaves(cls) |-> 0]
          /\ hist = <<>>

n == Len(hist) + 1
Write(side, p) == /\ hist' = Append(hist, [by |-> side, path |-> p])
                  /\ val' = [val EXCEPT ![p] = n]
(* A member replaced by another object: its fields are copied. *)
Replace(f) == /\ hist' = Append(hist, [by |-> "passign", path |-> <<f[1], f[3]>>])
              /\ val' = [p \in DOMAIN val |-> IF p[1] = f[1] THEN n ELSE val[p]]
PyNext == /\ Len(hist) < MaxSteps
          /\ UNCHANGED cls
          /\ \/ \E p \in Leaves(cls), side \in {"pset", "nset"} : Write(side, p)
             \/ \E f \in Members(cls) : Replace(f)
PySpec == PyInit /\ [][PyNext]_vars

Covers(s, p) == IF s.by = "passign" THEN p[1] = s.path[1] ELSE p = s.path
(* Every field holds what was last written to it, and nothing else changes. *)
LastWriteWins == \A p \in DOMAIN val :
    LET W == { i \in 1..Len(hist) : Covers(hist[i], p) }
    IN val[p] = IF W = {} THEN 0 ELSE CHOOSE i \in W : \A j \in W : j <= i
(* A write changes its target alone. *)
Framed == [][\A p \in DOMAIN val : val'[p] # val[p] => Covers(Last(hist'), p)]_vars

(* What Entities.empty() answers.  A list that was written to is not empty. *)
Empty == \A p \in DOMAIN val : val[p] = 0
Answers == IF cls = "Entities" THEN << <<"empty", Empty>> >> ELSE <<>>
EmptyIffUntouched == cls = "Entities" => (Empty <=> hist = <<>>)

EmitPy ==
    /\ hist = <<>> /\ cls = "MshSpec" => PrintT(ToJson([ classes |-> Classes, functions |-> Functions ]))
    /\ Len(hist) = MaxSteps => PrintT(ToJson([ cls |-> cls, hist |-> hist, val |-> { << p, val[p] >> : p \in DOMAIN val }, answers |-> Answers ]))
=============================================================================
