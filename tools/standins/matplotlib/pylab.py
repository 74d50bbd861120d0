"""Nothing is plotted."""
