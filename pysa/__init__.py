"""Static analyser for pysolar: abstract interpretation of /repo's source into value graphs."""
