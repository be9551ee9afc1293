extern "C" { int facility = (1<<3); }
