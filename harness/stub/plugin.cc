// loaded in place of the real plugin library: the plugin itself is linked into the harness
int gear_verif_plugin_stub = 1;
