NOTES={}
NA={}
