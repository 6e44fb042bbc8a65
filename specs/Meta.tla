-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* C20: the metadata store maps (band, exposure) to the last header added; *)
(* identifiers are injective; PSF lookup takes the nearest location.       *)
(* A header is a record of integer tokens: kw (sequence of keyword values),*)
(* and astrometry <<crval1, crval2, crpix1, crpix2, cd11, cd12, cd21, cd22>>*)
(***************************************************************************)
EXTENDS Geo, TLC
Has2(r, f) == f \in DOMAIN r
InitState(c) == [m |-> [x \in {} |-> 0]]                  \* key -> header token record
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Apply(st, ev) == IF ev.op = "add" THEN [st EXCEPT !.m = Put(@, ev.key, ev.hdr)] ELSE st
Dist2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Verdict(st, ev) ==
  IF Has2(ev, "exc") THEN "operation failed: " \o ev.exc ELSE
  CASE ev.op = "add" -> ""
    [] ev.op = "file" -> ""                              \* written and read back into a new store
    [] ev.op = "look" ->                                 \* every header, count and table entry the store now shows
         LET keys == {ev.recs[k].key : k \in 1..Len(ev.recs)} IN
         IF Len(ev.recs) # Cardinality(keys) THEN "an exposure appears twice" ELSE
         IF keys # DOMAIN st.m THEN "the store does not hold the exposures added" ELSE
         IF ev.nexp # Cardinality(DOMAIN st.m) THEN "exposure count" ELSE
         IF \E k \in 1..Len(ev.recs) : ev.recs[k].kw # st.m[ev.recs[k].key].kw THEN "a keyword of a header changed" ELSE
         IF \E k \in 1..Len(ev.recs) : ev.recs[k].as # st.m[ev.recs[k].key].as THEN "the astrometry of a header changed" ELSE ""
    [] ev.op = "wcs" ->                                  \* sky position of a pixel through the store's astrometry object
         LET keys == {ev.recs[k].key : k \in 1..Len(ev.recs)} IN
         IF ~(DOMAIN st.m \subseteq keys) /\ ev.all THEN "astrometry of an exposure is missing" ELSE
         IF ~(keys \subseteq DOMAIN st.m) THEN "astrometry of an unknown exposure" ELSE
         IF \E k \in 1..Len(ev.recs) : ev.recs[k].as # st.m[ev.recs[k].key].as THEN "astrometry object of another header" ELSE ""
    [] ev.op = "table" ->
         LET rows == ev.rows IN
         IF Len(rows) # Cardinality(DOMAIN st.m) THEN "the table does not list each exposure once" ELSE
         IF \E key \in DOMAIN st.m : Cardinality({k \in 1..Len(rows) : rows[k].id = st.m[key].id}) # Cardinality({x \in DOMAIN st.m : st.m[x].id = st.m[key].id})
         THEN "an exposure is missing from the table" ELSE
         IF \E k \in 1..Len(rows) : ~\E key \in DOMAIN st.m : st.m[key].id = rows[k].id /\ st.m[key].tab = rows[k].tab /\ st.m[key].as[1] = rows[k].ra /\ st.m[key].as[2] = rows[k].dec
         THEN "a table row mixes exposures" ELSE ""
    [] ev.op = "ids" ->
         LET N == 1..Len(ev.names) IN
         IF \E a, b \in N : (ev.names[a].path = ev.names[b].path) # (ev.ids[a] = ev.ids[b]) THEN "exposure identifiers are not one per file" ELSE
         IF \E a, b \in N : (ev.names[a].band = ev.names[b].band) # (ev.bands[a] = ev.bands[b]) THEN "band identifiers are not one per filter and detector module" ELSE
         IF \E a \in N : ev.bands[a] # ev.names[a].band THEN "name of a band" ELSE
         IF ev.ids # ev.ids2 \/ ev.bands # ev.bands2 THEN "identifiers are not stable" ELSE ""
    [] ev.op = "psf" ->
         LET locs == ev.locs
             d == [k \in 1..Len(locs) |-> Dist2(locs[k], ev.xy)]
         IN IF ev.tok \div 1000 # ev.band THEN "point-spread function of another band" ELSE
            IF ~ev.has THEN "" ELSE
            IF (ev.tok % 1000) \notin 1..Len(locs) THEN "unknown point-spread entry" ELSE
            IF d[ev.tok % 1000] > MinOf(Range(d)) + ev.slack THEN "not the nearest point-spread entry" ELSE
            IF ~ev.whole THEN "a point-spread entry is incomplete" ELSE ""
    [] OTHER -> "unknown event"
=============================================================================
