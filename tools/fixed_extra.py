# commit subject prefix -> property, for fix commits after the ranges in mkfixed.py
EXTRA={'a map must not hash an unformatted':'C12','u_sleep must sleep when':'C21','reserving SIZE_MAX bytes':'C15','a priority queue of SIZE_MAX':'C16','circular includes must':'C07','bound the nesting of':'C07','u_json_add() must drop':'C20','SCTP events that':'C03','u_sa_ntop() must':'C03','u_tokenize() must':'C23','a message one byte':'C11','printing a hash map':'C13','u_uri_crumble() must not drop':'C23','a new URI host':'C23','u_uri_knead() must separate':'C23'}
