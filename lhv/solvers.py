"""The public solvers and what their documentation promises about revolutions."""
SINGLE = ["avanzini2008", "battin1984", "gauss1809", "jiang2016", "pan2016", "thorne2004", "vallado2013"]
MULTI = ["gooding1990", "der2011", "arora2013", "izzo2015", "negrete2024", "mcelreath2025", "delatorre2018"]
ALL = sorted(SINGLE + MULTI)
ITERATED = ALL
