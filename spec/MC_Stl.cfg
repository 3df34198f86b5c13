INIT Init
NEXT Next
INVARIANTS RoundTrip CutText CutBinary MoreFacets FewerFacets Emit
