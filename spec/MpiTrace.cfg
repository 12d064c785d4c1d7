SPECIFICATION MpiSpec
