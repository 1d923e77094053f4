// the tracking runtime is built without origin tracking
extern "C" { extern const int __dfsan_track_origins; const int __dfsan_track_origins = 0; }
