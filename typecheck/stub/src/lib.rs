// builds cam-geom and nalgebra for the generated programs
