"""Stand-in for FontDocTools, which PathLib's plotter and colours build on and which is not installed here."""
