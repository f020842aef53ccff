---------------------------- MODULE Sensors ----------------------------
(* Bands of the sensors, in the order in which they are stored in the images. *)
Landsat == << "BLUE", "GREEN", "RED", "NIR", "SWIR1", "SWIR2" >>
Sentinel2 == << "BLUE", "GREEN", "RED", "REDEDGE1", "REDEDGE2", "REDEDGE3", "BROADNIR", "NIR", "SWIR1", "SWIR2" >>
Modis == << "BLUE", "GREEN", "RED", "NIR", "SWIR0", "SWIR1", "SWIR2" >>
Radar == << "VV", "VH" >>
SensorBands == [ LND04 |-> Landsat, LND05 |-> Landsat, LND07 |-> Landsat, LND08 |-> Landsat, LND09 |-> Landsat,
                 LNDLG |-> Landsat, SEN2A |-> Sentinel2, SEN2B |-> Sentinel2, SEN2C |-> Sentinel2, SEN2D |-> Sentinel2,
                 SEN2L |-> Sentinel2, MOD01 |-> Modis, MOD02 |-> Modis, MODIS |-> Modis,
                 S1AIA |-> Radar, S1AID |-> Radar, S1BIA |-> Radar, S1BID |-> Radar, VVVHP |-> Radar,
                 RGB |-> << "BLUE", "GREEN", "RED" >> ]
=====================================================================
