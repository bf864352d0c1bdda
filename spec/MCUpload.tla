-------------------------------- MODULE MCUpload --------------------------------
EXTENDS Upload
MCUploads == { "a", "b", "c" }
=================================================================================
