"""Abstract interpreter and property checks for es7s/kolombos. Never imports or runs the analysed code."""
