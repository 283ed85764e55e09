const char* FbleBuildStamp = "stamp";
